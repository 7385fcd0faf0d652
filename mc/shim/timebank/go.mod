module github.com/weedbox/timebank

go 1.21

require verif/vrt v0.0.0

replace verif/vrt => ../../vrt
