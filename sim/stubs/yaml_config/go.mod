module github.com/hrygo/yaml_config

go 1.18
