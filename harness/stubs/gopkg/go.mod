module github.com/bytedance/gopkg

go 1.18

require (
	github.com/stretchr/testify v1.9.0
	golang.org/x/net v0.24.0
	golang.org/x/sync v0.8.0
	golang.org/x/sys v0.19.0
)

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	golang.org/x/text v0.14.0 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)
