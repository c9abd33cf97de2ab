module gocv

go 1.27
