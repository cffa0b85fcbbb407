module verif.local/sym

go 1.18
