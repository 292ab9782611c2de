module vfharness

go 1.25

require ustack v0.0.0

replace ustack => /repo
