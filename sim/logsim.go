package main

type LogSc struct{}

func runLog(sc *Scenario) {}
