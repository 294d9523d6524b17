module verifharness

go 1.17

require (
	github.com/cespare/xxhash v1.1.0
	github.com/kazu/elist_head v0.2.8
	github.com/kazu/loncha v0.4.11
	github.com/kazu/skiplistmap v0.0.0-00010101000000-000000000000
)

require (
	github.com/lk4d4/trylock v0.0.0-20191027065348-ff7e133a5c54 // indirect
	github.com/seehuhn/mt19937 v0.0.0-20180715112136-cc7708819361 // indirect
)

replace github.com/kazu/skiplistmap => /repo

replace github.com/cespare/xxhash => ./xxhash
