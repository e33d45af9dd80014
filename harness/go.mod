module github.com/go-oidfed/lib/verifharness

go 1.23.0

require github.com/go-oidfed/lib v0.0.0

replace github.com/go-oidfed/lib => /repo
require (
	github.com/TwiN/gocache/v2 v2.2.2
	github.com/adam-hanna/arrayOperations v1.0.1
	github.com/fatih/structs v1.1.0
	github.com/go-resty/resty/v2 v2.16.5
	github.com/gofiber/fiber/v2 v2.52.8
	github.com/google/go-querystring v1.1.0
	github.com/google/uuid v1.6.0
	github.com/jarcoal/httpmock v1.4.0
	github.com/lestrrat-go/jwx/v3 v3.0.7
	github.com/lithammer/fuzzysearch v1.1.8
	github.com/luci/go-render v0.0.0-20160219211803-9a04cc21af0f
	github.com/pkg/errors v0.9.1
	github.com/redis/go-redis/v9 v9.10.0
	github.com/scylladb/go-set v1.0.3-0.20200225121959-cc7b2070d91e
	github.com/vmihailenco/msgpack/v5 v5.4.1
	golang.org/x/crypto v0.39.0
	gopkg.in/yaml.v3 v3.0.1
	tideland.dev/go/slices v0.2.0
)

require (
	github.com/cespare/xxhash/v2 v2.3.0 // indirect
	github.com/decred/dcrd/dcrec/secp256k1/v4 v4.4.0 // indirect
	github.com/dgryski/go-rendezvous v0.0.0-20200823014737-9f7001d12a5f // indirect
	github.com/goccy/go-json v0.10.3 // indirect
	github.com/google/go-cmp v0.7.0 // indirect
	github.com/kr/pretty v0.3.1 // indirect
	github.com/lestrrat-go/blackmagic v1.0.4 // indirect
	github.com/lestrrat-go/httpcc v1.0.1 // indirect
	github.com/lestrrat-go/httprc/v3 v3.0.0 // indirect
	github.com/lestrrat-go/option v1.0.1 // indirect
	github.com/lestrrat-go/option/v2 v2.0.0 // indirect
	github.com/rogpeppe/go-internal v1.13.1 // indirect
	github.com/segmentio/asm v1.2.0 // indirect
	github.com/valyala/bytebufferpool v1.0.0 // indirect
	github.com/valyala/fastjson v1.6.4 // indirect
	github.com/vmihailenco/tagparser/v2 v2.0.0 // indirect
	golang.org/x/exp v0.0.0-20220722155223-a9213eeb770e // indirect
	golang.org/x/net v0.38.0 // indirect
	golang.org/x/sys v0.33.0 // indirect
	golang.org/x/text v0.26.0 // indirect
	gopkg.in/check.v1 v1.0.0-20201130134442-10cb98267c6c // indirect
)
