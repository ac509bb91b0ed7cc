import bigint
bigint.main("C02")
