module verif/vrt

go 1.21
