module ogdlmc

go 1.23

require github.com/rveen/ogdl v0.0.0

require golang.org/x/text v0.3.8

replace github.com/rveen/ogdl => /repo
