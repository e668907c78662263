module verifmc

go 1.23

require (
	github.com/BurntSushi/toml v0.3.1
	github.com/fwhezfwhez/errorx v0.0.0-20200421094746-a2781b3fd382
	github.com/fwhezfwhez/tcpx v0.0.0
	github.com/golang/protobuf v1.4.2
	google.golang.org/protobuf v1.23.0
	gopkg.in/yaml.v2 v2.3.0
)

require github.com/gofrs/uuid v3.3.0+incompatible // indirect

replace github.com/fwhezfwhez/tcpx => /repo
