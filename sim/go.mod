module verifsim

go 1.25

require github.com/dropmorepackets/haproxy-go v0.0.0-00010101000000-000000000000

replace github.com/dropmorepackets/haproxy-go => /repo
