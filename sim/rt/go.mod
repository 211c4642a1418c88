module simrt

go 1.21
