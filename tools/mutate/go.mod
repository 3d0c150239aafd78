module mutate
go 1.21
