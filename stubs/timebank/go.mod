module github.com/weedbox/timebank

go 1.18

require verif.local/sym v0.0.0
