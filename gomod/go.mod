module github.com/couchbaselabs/gojsonsm

go 1.21

require (
	github.com/alecthomas/participle v0.7.1
	github.com/icrowley/fake v0.0.0-20221112152111-d7b7e2276db2
	github.com/stretchr/testify v1.12.1
)

require (
	github.com/corpix/uarand v0.0.0-20170723150923-031be390f409 // indirect
	go.yaml.in/yaml/v3 v3.0.5 // indirect
)
