//go:build !sched

package main

const schedBuild = false
