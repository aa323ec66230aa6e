NAMES = ["gauss1809", "battin1984", "jiang2016", "pan2016", "gooding1990", "der2011", "thorne2004", "avanzini2008",
         "arora2013", "vallado2013", "izzo2015", "negrete2024", "mcelreath2025", "delatorre2018"]
