module github.com/hsiaosiyuan0/mole

go 1.18
