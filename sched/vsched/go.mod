module vsched

go 1.23
