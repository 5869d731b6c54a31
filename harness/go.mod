module verif/harness

go 1.18

require github.com/liyue201/gostl v0.0.0

replace github.com/liyue201/gostl => /repo
