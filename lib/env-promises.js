module.exports = require('./env').promises;
