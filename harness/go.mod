module vharness

go 1.21

require (
	github.com/SmartBrave/Athena/easyio v0.0.0-20211208130222-74bac816a320
	github.com/sbraveyoung/GGmpeg v0.0.0
)

require (
	github.com/SmartBrave/Athena/broadcast v0.0.0-20220121140014-e46f7e4c2957 // indirect
	github.com/SmartBrave/Athena/easyerrors v0.0.0-20211208130222-74bac816a320 // indirect
	github.com/fatih/structs v1.1.0 // indirect
	github.com/goinggo/mapstructure v0.0.0-20140717182941-194205d9b4a9 // indirect
	github.com/pkg/errors v0.9.1 // indirect
)

replace github.com/sbraveyoung/GGmpeg => /repo
