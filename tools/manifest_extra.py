B = "generated C library and the bindings made for it, compiled with the simulated runtime"
checks.append(c("P10","exploration","seeded orders of questions and schedules of several asking goroutines, against a lone caller's answers","parser and translator; inputs from a seeded grammar; one P"))
checks.append(c("P11","exploration","seeded moments of collections, finalizers, other goroutines and nested callbacks around and inside C calls; C checks its arguments at entry, during and before return",B))
checks.append(c("P12","exploration","seeded histories of create, pass, copy, hold, free, drop and collect steps over a tracking allocator that never reuses addresses",B+"; three known findings"))
checks.append(c("P13","exploration","seeded calls, mutations and read-backs compared with a reference model of the values on both sides, under collections and schedules",B))
checks.append(c("P14","exploration","seeded, nested and interleaved callbacks of several types matched between the C and the Go side",B+"; one known finding"))
checks.append(c("P15","fault_enumeration","allocation failures injected at drawn calls of the C allocator, each call then repeated with memory back",B+"; allocations made inside cgo itself stop the process by design"))
