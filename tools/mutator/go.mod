module mutator

go 1.18
