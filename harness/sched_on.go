//go:build sched

package main

// schedBuild: the library is instrumented and its schedules are controlled.
const schedBuild = true
