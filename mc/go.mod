module verif/mc

go 1.23

require github.com/zerosnake0/jzon v0.0.0

replace github.com/zerosnake0/jzon => /repo
