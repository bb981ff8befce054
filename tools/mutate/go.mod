module verif.local/mutate

go 1.22
