module verif/harness

go 1.23

require github.com/mmadfox/go-geoql-parser v0.0.0

replace github.com/mmadfox/go-geoql-parser => /repo
