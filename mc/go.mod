module verif/mc

go 1.20

require github.com/shellyln/takenoco v0.0.0

replace github.com/shellyln/takenoco => /repo
