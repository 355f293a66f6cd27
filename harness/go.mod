module verif/harness

go 1.26

require (
	github.com/google/uuid v1.3.0
	github.com/lucasb-eyer/go-colorful v1.2.0
	github.com/mmadfox/go-gpsgen v0.0.0
	google.golang.org/protobuf v1.30.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/icholy/utm v1.0.1 // indirect
	github.com/paulmach/orb v0.10.0 // indirect
	github.com/tkrajina/gpxgo v1.3.0 // indirect
	github.com/valyala/fastrand v1.1.0 // indirect
	go.mongodb.org/mongo-driver v1.11.4 // indirect
	golang.org/x/net v0.0.0-20211112202133-69e39bad7dc2 // indirect
	golang.org/x/text v0.3.7 // indirect
)

replace github.com/mmadfox/go-gpsgen => /repo
