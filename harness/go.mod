module verif

go 1.23

require (
	github.com/zhangyunhao116/fastrand v0.2.1
	github.com/zhangyunhao116/skipset v0.0.0
)

replace github.com/zhangyunhao116/skipset => /repo
