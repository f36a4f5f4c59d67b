module aqlverif

go 1.20

require github.com/flowchartsman/aql v0.0.0

require (
	github.com/araddon/dateparse v0.0.0-20210429162001-6b43995a97de // indirect
	github.com/buger/jsonparser v1.1.1 // indirect
	github.com/fogleman/gg v1.3.0 // indirect
	github.com/goccy/go-graphviz v0.1.0 // indirect
	github.com/golang/freetype v0.0.0-20170609003504-e2365dfdc4a0 // indirect
	github.com/pkg/errors v0.9.1 // indirect
	go.uber.org/atomic v1.9.0 // indirect
	golang.org/x/image v0.6.0 // indirect
	golang.org/x/text v0.8.0 // indirect
)

replace github.com/flowchartsman/aql => /repo
