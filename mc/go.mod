module verifmc

go 1.23

require (
	github.com/ldsec/lattigo/v2 v2.3.0
	mk-lattigo v0.0.0
)

require (
	golang.org/x/crypto v0.0.0-20210921155107-089bfa567519 // indirect
	golang.org/x/sys v0.0.0-20211007075335-d3039528d8ac // indirect
)

replace mk-lattigo => /repo
