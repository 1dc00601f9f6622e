module go.mongodb.org/mongo-driver

go 1.18
