"""Property id -> check module."""
PROPS = {
    'C01': 'altitude_safety',
    'C02': 'envelope_safety',
    'C03': 'power_safety',
    'C04': 'safety_precedence',
    'C05': 'balloon_dynamics',
    'C06': 'atmosphere',
    'C07': 'solar_power',
    'C08': 'solar_position',
    'C09': 'units_algebra',
    'C10': 'transforms',
    'C11': 'initial_state',
    'C12': 'geometry',
    'C13': 'reward',
    'C14': 'wind_field',
    'C15': 'grid_wind',
    'C16': 'episode',
    'C17': 'determinism',
    'C18': 'features',
    'C19': 'pressure_range',
    'C20': 'wind_gp',
    'C21': 'sun_search',
    'C22': 'thermal',
    'C23': 'station_seeker',
    'C24': 'exploration',
    'C25': 'checkpoints',
    'C26': 'learners',
    'C27': 'training',
    'C28': 'evaluation',
    'C29': 'shards',
    'C30': 'compressor',
    'C31': 'launch',
    'C32': 'rendering',
    'C33': 'networks',
    'C34': 'ready_agents',
    'C35': 'wind_training',
    'C36': 'acme',
}
