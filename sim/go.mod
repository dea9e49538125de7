module verif

go 1.24.0
