module verif.local/sim

go 1.25

require github.com/mmcloughlin/ssarules v0.0.0

replace github.com/mmcloughlin/ssarules => /repo
