package main

func OLD[T any](x T) T   { return x }
func IMP(a, b bool) bool { return !a || b }
func IFF(a, b bool) bool { return a == b }
