module verif

go 1.26

require github.com/cloudwego/prutal v0.0.0

replace github.com/cloudwego/prutal => /repo
