package pdf
