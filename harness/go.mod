module verifharness

go 1.23

require github.com/xeipuuv/gojsonschema v0.0.0

require (
	github.com/xeipuuv/gojsonpointer v0.0.0-20180127040702-4e3ac2762d5f // indirect
	github.com/xeipuuv/gojsonreference v0.0.0-20180127040603-bd5ef7bd5415 // indirect
)

replace github.com/xeipuuv/gojsonschema => /repo
