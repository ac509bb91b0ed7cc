import bigint
bigint.main("C04")
