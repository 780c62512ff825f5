package main

var props = func() []prop {
	var out []prop
	for _, l := range [][]prop{propsA, propsB, propsC, propsD, propsE, propsF} {
		out = append(out, l...)
	}
	return out
}()

const tests = "The repository's tests run one or two hand-made inputs through this code and check nothing of what is claimed here; "
