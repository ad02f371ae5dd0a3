module verif/harness

go 1.21

require (
	blichmann.eu/code/btrfscue v0.0.0
	go.etcd.io/bbolt v1.3.6
)

require golang.org/x/sys v0.0.0-20220829200755-d48e67d00261 // indirect

replace blichmann.eu/code/btrfscue => /repo
