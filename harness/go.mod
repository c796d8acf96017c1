module verifharness

go 1.13

require fast-ksw v0.0.0

replace fast-ksw => /repo
