raise ValueError("broken")
