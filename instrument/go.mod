module verifinstrument

go 1.22
