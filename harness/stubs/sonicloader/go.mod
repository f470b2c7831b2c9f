module github.com/bytedance/sonic/loader

go 1.18
