module genshim

go 1.24
