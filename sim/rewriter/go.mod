module simrewrite

go 1.22
