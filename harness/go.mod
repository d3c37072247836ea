module verifharness

go 1.26.0

require flychain v0.0.0

require github.com/go-stack/stack v1.8.1

replace flychain => /repo
