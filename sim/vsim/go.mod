module vsim

go 1.23

require plan v0.0.0

replace plan => ../plan
