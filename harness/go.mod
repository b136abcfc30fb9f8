module verifharness

go 1.22.3

require (
	github.com/deckarep/golang-set/v2 v2.6.0
	github.com/williamflynt/topolith v0.0.0
)

replace github.com/williamflynt/topolith => /repo
