module verif/harness

go 1.27

require (
	github.com/aclindsa/ofxgo v0.0.0
	github.com/aclindsa/xml v0.0.0-20201125035057-bbd5c9ec99ac
)

require golang.org/x/text v0.3.8 // indirect

replace github.com/aclindsa/ofxgo => /repo
