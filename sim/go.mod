module verifsim

go 1.22

require (
	github.com/avast/apkparser v0.0.0-20251022140151-7294e274bf65
	github.com/avast/apkverifier v0.0.0
)

require github.com/klauspost/compress v1.18.0 // indirect

replace github.com/avast/apkverifier => REPOCOPY
