// intentionally empty
