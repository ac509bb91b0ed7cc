import bigint
bigint.main("C03")
