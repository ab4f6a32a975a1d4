module verifmc

go 1.20
