65537
