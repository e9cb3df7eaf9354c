module aaa

go 1.22
