module verifbuilder

go 1.22
