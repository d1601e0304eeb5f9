module scte35vg

go 1.24
