module verifharness

go 1.25

require github.com/savaki/kafka v0.0.0

replace github.com/savaki/kafka => /repo
