module github.com/bytedance/sonic/loader

go 1.16

require (
	github.com/cloudwego/iasm v0.2.0
	github.com/stretchr/testify v1.8.1
)
